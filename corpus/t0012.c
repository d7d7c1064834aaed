int main(int argc, int argv) { exit(8 / (4 - 3)); }
