int main(int argc, int argv) { exit(0 ? 10 : 25); }
