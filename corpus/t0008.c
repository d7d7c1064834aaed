int main(int argc, int argv) { exit(16 >> 2); }
