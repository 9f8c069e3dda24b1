// Most general client of the stopwatch: any operation, any number of times.
#include <pluto/stopwatch.hpp>
extern "C" {
int nondet();
void op_begin(int op);
void op_end(int op);
void observe(int op, long long value);
void sw_history(bool startNow)
{
    op_begin(100);
    pluto::stopwatch sw{ startNow };
    op_end(startNow ? 101 : 100);
    for (;;)
    {
        int op = nondet();
        op_begin(op);
        switch (op)
        {
            case 0: return;
            case 1: sw.start(); break;
            case 2: sw.stop(); break;
            case 3: sw.reset(); break;
            case 4: sw.restart(); break;
            case 5: observe(op, sw.time().count()); break;
            case 6: observe(op, sw.stop_and_time().count()); break;
            case 7: observe(op, sw.is_running()); break;
            case 10: observe(op, sw.in_nanoseconds()); break;
            case 11: observe(op, sw.in_microseconds()); break;
            case 12: observe(op, sw.in_milliseconds()); break;
            case 13: observe(op, sw.in_seconds()); break;
            case 14: observe(op, sw.in_minutes()); break;
            case 15: observe(op, sw.in_hours()); break;
            case 20: observe(op, sw.nanoseconds_part()); break;
            case 21: observe(op, sw.microseconds_part()); break;
            case 22: observe(op, sw.milliseconds_part()); break;
            case 23: observe(op, sw.seconds_part()); break;
            case 24: observe(op, sw.minutes_part()); break;
            case 25: observe(op, sw.hours_part()); break;
        }
        op_end(op);
    }
}
}
