package zz_verifspec

import "errors"

var errOther = errors.New("error")

// Leap is the leap year rule of the proleptic Gregorian calendar, with
// astronomical year numbers.
func Leap(y int) bool {
	return y%4 == 0 && (y%100 != 0 || y%400 == 0)
}

// MonthLen is the number of days of a month.
func MonthLen(y int, m int) int {
	switch m {
	case 2:
		if Leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// DaysInMonth is what calendar.DaysInMonth returns.
func DaysInMonth(y int, m int) (int, error) {
	if m < 1 || m > 12 {
		return 0, errOther
	}
	return MonthLen(y, m), nil
}
