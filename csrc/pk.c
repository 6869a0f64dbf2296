/* Tiny archiver used as the packer of generated configurations.
 *   pk a ARC FILE   append FILE to ARC      pk x ARC   extract into cwd
 * If ./pkfail-like file named by PKFAIL exists, exits with that file's number. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
int main(int c, char **v)
{
   FILE *a, *f; char name[64], *b; uint32_t len; static char buf[1 << 20];
   if (c < 3) return 9;
   if (v[1][0] == 'f') return 12;
   if (v[1][0] == 'a')
   {
      char flag[300]; snprintf(flag, 300, "%s", v[3]);
      b = strrchr(flag, '/'); strcpy(b ? b + 1 : flag, "pkfail");
      if ((f = fopen(flag, "r"))) { int n = 1; if (fscanf(f, "%d", &n) != 1) n = 1; fclose(f); return n; }
      strcpy(b ? b + 1 : flag, "pksig");
      if ((f = fopen(flag, "r"))) { fclose(f); raise(9); }
      if (!(f = fopen(v[3], "rb"))) return 2;
      if (!(a = fopen(v[2], "ab"))) return 3;
      b = strrchr(v[3], '/'); b = b ? b + 1 : v[3];
      memset(name, 0, 64); strncpy(name, b, 60);
      fseek(f, 0, SEEK_END); len = ftell(f); fseek(f, 0, SEEK_SET);
      fwrite("PKAR", 1, 4, a); fwrite(name, 1, 64, a); fwrite(&len, 4, 1, a);
      while ((len = fread(buf, 1, sizeof buf, f))) fwrite(buf, 1, len, a);
      fclose(f); return fclose(a) ? 4 : 0;
   }
   if (v[1][0] == 'b')
   {  /* record the name of a file */
      char flag[300]; snprintf(flag, 300, "%s.fail", v[2]);
      b = strrchr(v[3], '/');
      if ((f = fopen(flag, "r"))) { memset(name, 0, 64); if (fscanf(f, "%60s", name) != 1) name[0] = 0; fclose(f); if (!strcmp(name, b ? b + 1 : v[3])) return 1; }
      if (!(a = fopen(v[2], "ab"))) return 3;
      fprintf(a, "%s\n", b ? b + 1 : v[3]);
      return fclose(a) ? 4 : 0;
   }
   if (!(a = fopen(v[2], "rb"))) return 2;
   while (fread(buf, 1, 4, a) == 4)
   {
      if (memcmp(buf, "PKAR", 4)) return 5;
      if (fread(name, 1, 64, a) != 64 || fread(&len, 4, 1, a) != 1) return 6;
      if (strchr(name, '/')) return 7;
      if (!(f = fopen(name, "wb"))) return 8;
      while (len) { uint32_t n = len > sizeof buf ? sizeof buf : len; if (fread(buf, 1, n, a) != n) return 6; fwrite(buf, 1, n, f); len -= n; }
      fclose(f);
   }
   return 0;
}
