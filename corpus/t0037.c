int main(int argc, int argv) { exit(1 || 0); }
