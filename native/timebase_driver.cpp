// Prints, for every day of [first, last] years: year month day number-from-epoch time-of-number text
#include <eustace/timeutils/timebase.h>
#include <cstdio>
#include <cstdlib>
#include <string>
using namespace EUSTACE;
int main(int argc, char** argv)
{
  int y0 = atoi(argv[1]), m0 = atoi(argv[2]), d0 = atoi(argv[3]);
  TimeBaseDays base(CalendarDay(y0, m0, d0));
  int y, m, d; long n;
  while (scanf("%d %d %d %ld", &y, &m, &d, &n) == 4)
  {
    std::string a, b, c;
    char text[16];
    sprintf(text, "%04d%02d%02d", y, m, d);
    CalendarDay(y, m, d).Text(a);
    CalendarDay(std::string(text)).Text(b);
    CalendarDay(base.Time(n)).Text(c);
    printf("%ld %ld %s %s %s\n", (long)base.Number(CalendarDay(y, m, d)), (long)base.Number(base.Time(n)), a.c_str(), b.c_str(), c.c_str());
  }
  return 0;
}
