int main(int argc, int argv) { exit(021 >= 21); }
