int main(int argc, int argv) { exit(012); }
