int main(int argc, int argv) { while(1) break; return 10; }
