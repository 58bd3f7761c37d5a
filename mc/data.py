"""Registration data written as CSV files and read by the real data tables."""
import datetime
import os

START = "2019-12-28"


def date(day):
    return (datetime.date(2019, 12, 28) + datetime.timedelta(days=day)).isoformat()


def write_series(fn, pts, header=True, comment=False):
    with open(fn, "w") as f:
        if header:
            f.write("#Date,count\n" if header is True else header + "\n")
        for i, (d, v) in enumerate(pts):
            f.write("%s,%s\n" % (date(d), v))
            if comment and i == 0:
                f.write("#%s,99\n\n" % date(d))
                f.write("%s,\n" % date(d))


def write_layout(rows, sub="data"):
    """rows: [(name, [series, ...])]; series: [(day, value)]"""
    os.makedirs(sub, exist_ok=True)
    with open(os.path.join(sub, "layout.csv"), "w") as f:
        f.write("#name,file\n")
        for i, (n, ss) in enumerate(rows):
            fns = []
            for j, s in enumerate(ss):
                j = [x is s for x in ss].index(True)  # the same series object: the same file listed again
                fn = "s%d_%d.csv" % (i, j)
                write_series(os.path.join(sub, fn), s)
                fns.append(fn)
            f.write("%s,%s\n" % (n, ",".join(fns)))


def table(rows, sub="data", **k):
    from flee.datamanager import handle_refugee_data
    write_layout(rows, sub)
    return handle_refugee_data.RefugeeTable(csvformat="generic", data_directory=sub, start_date=START, data_layout="layout.csv", **k)


def interpolated(s, t):
    """Set of accepted integers for the level of series s on day t (truncation of the straight line)."""
    from fractions import Fraction as Fr
    s = [(d, Fr(v)) for d, v in s]
    if t <= s[0][0]:
        return {int(s[0][1])}
    for (d0, v0), (d1, v1) in zip(s, s[1:]):
        if t < d1:
            x = v0 + (v1 - v0) * Fr(t - d0, d1 - d0)
            out = {int(x)}
            if x.denominator == 1 and t != d0 and x > 0:
                # the exact value is an integer reached through floating point: either side of it
                out |= {int(float(v0) + float(t - d0) / float(d1 - d0) * float(v1 - v0)), int(x)}
            return out
    return {int(s[-1][1])}


def latest(s, t):
    v = s[0][1]
    for d, x in s:
        if d <= t:
            v = x
    return int(v)
