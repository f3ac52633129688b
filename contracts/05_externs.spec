# What is assumed of the standard library. Functions that are not listed here and have no contract
# are taken to return an arbitrary value and to leave the memory of the package alone.

extern errors.New(s) r
  ensures r != nil && fresh(r)

extern fmt.Errorf(format, a) r
  ensures r != nil && fresh(r)

# the only error values in the package come from the two functions above
extern error.Error(x) r
