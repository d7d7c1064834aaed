typedef struct {
    int a;
    int b;
} struct_t;
int main() { return sizeof(struct_t*); }
