int main(int argc, int argv) { exit(8 + 3 * 4); }
