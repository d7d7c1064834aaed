int main(int argc, int argv) { exit(2 << 3); }
