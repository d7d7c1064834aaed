int main(int argc, int argv) { exit(41 || 20); }
