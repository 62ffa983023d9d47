// instrumented stand-ins for C library functions that read memory
#include <stddef.h>
int symlibc_memcmp(const void* a,const void* b,size_t n){ const unsigned char*x=a,*y=b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int symlibc_bcmp(const void* a,const void* b,size_t n){ return symlibc_memcmp(a,b,n); }
size_t symlibc_strlen(const char* s){ size_t n=0; while(s[n]) n++; return n; }
int symlibc_strncmp(const char* a,const char* b,size_t n){ for(size_t i=0;i<n;i++){ unsigned char x=a[i],y=b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
int symlibc_strcmp(const char* a,const char* b){ return symlibc_strncmp(a,b,(size_t)-1); }
void* symlibc_memchr(const void* s,int c,size_t n){ const unsigned char*p=s; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
char* symlibc_strchr(const char* s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* symlibc_strcpy(char* d,const char* s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char* symlibc_strstr(const char* h,const char* n){ size_t l=symlibc_strlen(n); for(;;h++){ if(symlibc_strncmp(h,n,l)==0) return (char*)h; if(!*h) return 0; } }
int symlibc_toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
int symlibc_tolower(int c){ return c>='A'&&c<='Z'?c+32:c; }
int symlibc_isspace(int c){ return c==' '||(c>=9&&c<=13); }
int symlibc_isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
int symlibc_isdigit(int c){ return c>='0'&&c<='9'; }
int symlibc_isalnum(int c){ return symlibc_isalpha(c)||symlibc_isdigit(c); }
