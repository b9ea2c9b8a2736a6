#include "shim.h"
#include "FimexTime.cc"
#include "TimeUtils.cc"

using namespace MetNoFimex;

extern "C" unsigned long encode_time(int y, int mo, int d, int h, int mi, int s, int ms)
{
    return FimexTime(y, mo, d, h, mi, s, ms).toEncoded();
}
extern "C" bool later_time(int y, int mo, int d, int h, int mi, int s, int ms, int y2, int mo2, int d2, int h2, int mi2, int s2, int ms2)
{
    return FimexTime(y, mo, d, h, mi, s, ms) > FimexTime(y2, mo2, d2, h2, mi2, s2, ms2);
}
extern "C" bool same_time(int y, int mo, int d, int h, int mi, int s, int ms, int y2, int mo2, int d2, int h2, int mi2, int s2, int ms2)
{
    return FimexTime(y, mo, d, h, mi, s, ms) == FimexTime(y2, mo2, d2, h2, mi2, s2, ms2);
}
extern "C" int recode_time(int y, int mo, int d, int h, int mi, int s, int ms, int* out)
{
    const FimexTime t = FimexTime::fromEncoded(FimexTime(y, mo, d, h, mi, s, ms).toEncoded());
    out[0] = t.getYear();
    out[1] = t.getMonth();
    out[2] = t.getMDay();
    out[3] = t.getHour();
    out[4] = t.getMinute();
    out[5] = t.getSecond();
    out[6] = t.getMSecond();
    return 0;
}
extern "C" long epoch_seconds_of(int y, int mo, int d, int h, int mi, int s)
{
    return fimexTime2epochTime(FimexTime(y, mo, d, h, mi, s));
}
