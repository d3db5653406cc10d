# The AMF0 dependency (github.com/WatchBeam/amf0), whose source is not available here:
# what the code relies on, assumed.

func amf0.NewArray() (a)
  trusted dependency
  ensures a != nil && fresh(a)
end
func amf0.NewObject() (o)
  trusted dependency
  ensures o != nil && fresh(o)
end
func amf0/encoding.Marshal(v) (b, err)
  trusted dependency
  event
  requires v != nil
  ensures err == nil ==> fresh(b)
end
func amf0/encoding.Unmarshal(r, v) (err)
  trusted dependency
  event
  requires r != nil && v != nil
  modifies in(r), v.*
end
func amf0.Decode(r) (v, err)
  trusted dependency
  event
  requires r != nil
  modifies in(r)
  ensures err == nil && is(v, *amf0.String) ==> as(v, *amf0.String) != nil
end
