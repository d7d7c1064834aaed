typedef enum { enum1 = 5, enum2 } enum_t;
int main() { enum_t v = enum2; return v; }
