typedef enum {
    A,
    B
} enum_t;
int main() { return sizeof(enum_t*); }
