int main(int argc, int argv) { exit(58 - 28); }
