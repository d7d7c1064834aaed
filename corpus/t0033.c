int main(int argc, int argv) { exit(~0355); }
