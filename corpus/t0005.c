int main(int argc, int argv) { exit(24 + 18); }
