package kit

// Union is the reference model of a merge: the deep union of two objects; fn settles every
// collision of values that are not both objects.
func Union(dst, src map[string]interface{}, fn func(d, s interface{}) (interface{}, error)) (map[string]interface{}, error) {
	out := map[string]interface{}{}
	for k, v := range dst {
		out[k] = Copy(v)
	}
	var firstErr error
	for k, s := range src {
		d, ok := dst[k]
		if !ok {
			out[k] = Copy(s)
			continue
		}
		dm, ok1 := d.(map[string]interface{})
		sm, ok2 := s.(map[string]interface{})
		if ok1 && ok2 {
			m, err := Union(dm, sm, fn)
			if err != nil {
				firstErr = err
				continue
			}
			out[k] = m
			continue
		}
		v, err := fn(d, s)
		if err != nil {
			firstErr = err
			continue
		}
		out[k] = Copy(v)
	}
	return out, firstErr
}
