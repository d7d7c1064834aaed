int main(int argc, int argv) { while(0); return 10; }
