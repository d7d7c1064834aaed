int main(int argc, int argv) { exit(010 == 8); }
