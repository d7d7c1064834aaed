int main(int argc, int argv) { exit(256 >> 3); }
