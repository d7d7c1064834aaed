int main(int argc, int argv) { return 2*21; }
