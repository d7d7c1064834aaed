int main()
{
    printf("%d", 477 / 37 % -3);
    return 0;
}
