int main(int argc, int argv) { exit(9 / 3 + 7); }
