int main(int argc, int argv) { exit(111 % 7); }
