/* Interprets a history of string function calls given as argv[1]. */
char m[96];
char hex[200];
char *sc;
int pos;

int num()
{
    int v = 0;
    while (sc[pos] >= '0' && sc[pos] <= '9') {
        v = v * 10 + sc[pos] - '0';
        pos++;
    }
    pos++;
    return v;
}

int digit(int c)
{
    if (c <= '9')
        return c - '0';
    return c - 'a' + 10;
}

int hexchar(int v)
{
    if (v < 10)
        return '0' + v;
    return 'a' + v - 10;
}

int main(int argc, char *argv[])
{
    int i;
    int a;
    int b;
    int n;
    int r;
    char *q;
    sc = argv[1];
    pos = 0;
    for (i = 0; i < 96; i++)
        m[i] = 165;
    while (sc[pos]) {
        int op = sc[pos];
        pos++;
        a = num();
        r = 0;
        if (op == 'p') {
            while (sc[pos] != ';') {
                m[a] = digit(sc[pos]) * 16 + digit(sc[pos + 1]);
                a++;
                pos += 2;
            }
            pos++;
        }
        if (op == 'L')
            r = strlen(m + a);
        if (op == 'C') {
            b = num();
            r = strcmp(m + a, m + b);
        }
        if (op == 'N') {
            b = num();
            n = num();
            r = strncmp(m + a, m + b, n);
        }
        if (op == 'Y') {
            b = num();
            q = strcpy(m + a, m + b);
            for (r = 0; r < 96; r++)
                if (m + r == q)
                    break;
        }
        if (op == 'Z') {
            b = num();
            n = num();
            q = strncpy(m + a, m + b, n);
            for (r = 0; r < 96; r++)
                if (m + r == q)
                    break;
        }
        if (op == 'M') {
            b = num();
            n = num();
            q = memcpy(m + a, m + b, n);
            for (r = 0; r < 96; r++)
                if (m + r == q)
                    break;
        }
        if (op == 's') {
            for (i = 0; i < 96; i++) {
                hex[2 * i] = hexchar(m[i] >> 4);
                hex[2 * i + 1] = hexchar(m[i] & 15);
            }
            hex[192] = 0;
            printf("%s\n", hex);
        } else
            printf("%d\n", r);
    }
    printf("end\n");
    return 0;
}
