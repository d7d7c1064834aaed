int main(int argc, int argv) { exit(0100 >> 2); }
