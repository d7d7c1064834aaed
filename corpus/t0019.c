int main(int argc, int argv) { exit(017 + 012); }
