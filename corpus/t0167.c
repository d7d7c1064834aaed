int main()
{
    printf("%d %d", -0155 / -9, -0155 % -9);
    return 0;
}
