"""proleptic Gregorian calendar on integers (independent of the code)"""
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
DPM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]

def leap_days_before(y):
    """number of leap days in the years 1..y-1"""
    n = y - 1
    return n//4 - n//100 + n//400

def leap(y):
    """1 if y is a leap year else 0 (as a difference of counts: no branch)"""
    return leap_days_before(y + 1) - leap_days_before(y)

def ordinal_jan1(y):
    """days from 0001-01-01 (=1) to January 1st of year y"""
    return 365*(y - 1) + leap_days_before(y) + 1

def ordinal(y, m, d):
    """m is a concrete month"""
    r = ordinal_jan1(y) + CUM[m-1] + d - 1
    return r + leap(y) if m > 2 else r

def month_length(y, m):
    return DPM[m-1] + leap(y) if m == 2 else DPM[m-1]

MJD0 = 678576      # ordinal of 1858-11-17
