// Replay driver: reads "id value" pairs from the file given in argv[1], runs the harness
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct rec { char id[64]; double v; int used; };
static struct rec recs[100000]; static int Nrecs;
double vh_next(const char* id)
{
    for(int i=0;i<Nrecs;i++)
        if(!recs[i].used && 0==strcmp(recs[i].id,id)) { recs[i].used=1; return recs[i].v; }
    return 0;
}
void VH_FUNCTION(void);
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1],"r");
    char v[128];
    while(Nrecs<100000 && 2==fscanf(f,"%63s %127s", recs[Nrecs].id, v)) recs[Nrecs++].v = strtod(v,NULL);
    fclose(f);
    VH_FUNCTION();
    return 0;
}
