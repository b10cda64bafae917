// Package gomock stands in for go.uber.org/mock/gomock: the mocks of the
// repository have to compile, none is used.
package gomock

import "reflect"

type TestHelper interface {
	Helper()
}
type helper struct{}

func (helper) Helper() {}

type Controller struct{ T TestHelper }

func NewController(any) *Controller { return &Controller{T: helper{}} }
func (c *Controller) Call(receiver any, method string, args ...any) []any {
	panic("mock called: " + method)
}
func (c *Controller) Finish() {}
func (c *Controller) RecordCallWithMethodType(receiver any, method string, t reflect.Type, args ...any) *Call {
	return &Call{}
}
func (c *Controller) RecordCall(receiver any, method string, args ...any) *Call { return &Call{} }

type Call struct{}

func (c *Call) AnyTimes() *Call             { return c }
func (c *Call) Times(int) *Call             { return c }
func (c *Call) MinTimes(int) *Call          { return c }
func (c *Call) MaxTimes(int) *Call          { return c }
func (c *Call) Return(...any) *Call         { return c }
func (c *Call) Do(any) *Call                { return c }
func (c *Call) DoAndReturn(any) *Call       { return c }
func (c *Call) After(*Call) *Call           { return c }

type Matcher interface {
	Matches(any) bool
	String() string
}
type anyMatcher struct{}

func (anyMatcher) Matches(any) bool { return true }
func (anyMatcher) String() string   { return "is anything" }
func Any() Matcher                  { return anyMatcher{} }
func InOrder(...any)                {}
