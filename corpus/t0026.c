int main(int argc, int argv) { exit(5 >= 5); }
