#pragma once
// What a Date must look like: computed from the moment or the fields it was given.
struct DateModel { bool by_fields; int f[6]; long t; };            // by_fields: calendar fields (normalised), the moment follows; else the moment in seconds
struct DateView { int f[6]; int wday, offset; long time; char text[80], locale[80], gmt[80]; };
void model_now(DateModel &m, long got, long t0, long t1); void model_fields(DateModel &m, const int *f); void model_stamp(DateModel &m, long t); void model_set(DateModel &m, int k, int v);
void model_parse(DateModel &m, long packed, long how, char *text); void model_forget(); void model_century(DateModel &m, int year);
void chk_date(DateModel &m, const DateView &v, const char *after); void chk_order(const DateModel &a, const DateModel &b, int cmp, bool before, bool after, bool equals, bool same, bool hash);
void chk_format(long t, int zone, int pattern, const char *got); void chk_zone_unchanged();
void date_zone_setup(int zone); void date_warm(int zone); const char *date_zone(int z); const char *date_pattern(int p);
long pack_fields(int y, int mo, int d, int h, int mi, int s); void unpack_fields(long p, int *f);
