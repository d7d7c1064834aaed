int main(int argc, int argv) { exit(30 != 20); }
