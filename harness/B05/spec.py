BOUNDS = "every time from year 1 to 9999 and every span up to 10000 years of either sign, to the quarter nanosecond the library resolves"
OUTSIDE = "times and spans not representable in the message form, including infinite ones"
ASSUMPTIONS = ["times have the representation of the real library (seconds and quarter nanoseconds)"]
UNITS = {"time": dict(harness="time.cc", sources=["fcp/base/time_util.cc"])}
JOBS = [dict(unit="time", name="time to message", params=dict(mode=0), reach=["time"]), dict(unit="time", name="message to time", params=dict(mode=1), reach=["time"])]
for neg in (0, 1):
    JOBS += [dict(unit="time", name="span to message neg=%d" % neg, params=dict(mode=2, neg=neg), reach=["span"]), dict(unit="time", name="message to span neg=%d" % neg, params=dict(mode=3, neg=neg), reach=["span"])]
