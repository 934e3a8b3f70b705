//go:build go1.22

package user

func Current() (*User, error) {
	return &User{Uid: "1000", Gid: "1000", Username: "hound", Name: "hound", HomeDir: "/home/hound"}, nil
}
func Lookup(n string) (*User, error)   { return Current() }
func LookupId(n string) (*User, error) { return Current() }
