package props

import "time"

func msec(i int) time.Duration { return time.Duration(i)*time.Millisecond + time.Second }
func epoch(i int) time.Time    { return time.Unix(int64(1000000000+i*86400), 0).UTC() }
func epochText(i int) string   { return epoch(i).Format(time.RFC3339) }

func boolText(v string) (string, bool) {
	switch v {
	case "1", "t", "T", "true", "TRUE", "True", "YES", "yes", "Yes", "y", "ON", "on", "On":
		return "true", true
	case "0", "f", "F", "false", "FALSE", "False", "NO", "no", "No", "n", "OFF", "off", "Off":
		return "false", true
	}
	return "", false
}

func durText(v string) (string, bool) {
	d, err := time.ParseDuration(v)
	return d.String(), err == nil
}

func timeText(v string) (string, bool) {
	t, err := time.Parse(time.RFC3339, v)
	return t.UTC().String(), err == nil
}
