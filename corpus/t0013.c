int main(int argc, int argv) { exit(8 + 3 * 5 + 2 * 6); }
