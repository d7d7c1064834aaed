int main(int argc, int argv) { int x; x=0; while(x < 2){x++; continue; abort();} return x; }
