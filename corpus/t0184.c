int main()
{
    printf("%d", sizeof(bool));
    return 0;
}
