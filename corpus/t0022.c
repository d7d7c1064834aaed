int main(int argc, int argv) { exit(10 > 5); }
