int main(int argc, int argv) { exit(3+3 > 5); }
