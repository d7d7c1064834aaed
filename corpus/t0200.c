int main() {
    int written = printf("Hello World");
    return written;
}
