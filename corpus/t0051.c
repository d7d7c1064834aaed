int main(int argc, int argv) { int va; int vb; va = 11; vb = 31; int vc; vc = va + vb; return vc; }
