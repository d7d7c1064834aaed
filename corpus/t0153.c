#define M(a, b) a + b
int main()
{
    return M(1, 2) * 3;
}
