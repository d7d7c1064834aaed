int main(int argc, int argv) { return 1; }
