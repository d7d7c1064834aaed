int main(int argc, int argv) { exit((11 - 2) * 6); }
