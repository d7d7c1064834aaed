int main(int argc, int argv) { exit((012 - 5) == 5); }
