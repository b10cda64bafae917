// Package lru stands in for github.com/hashicorp/golang-lru/v2: a thread-safe
// LRU cache of fixed capacity.
package lru

import (
	"container/list"
	"errors"
	"sync"
)

type entry[K comparable, V any] struct {
	k K
	v V
}
type Cache[K comparable, V any] struct {
	mu    sync.RWMutex
	size  int
	order *list.List
	items map[K]*list.Element
}

func New[K comparable, V any](size int) (*Cache[K, V], error) {
	if size <= 0 {
		return nil, errors.New("must provide a positive size")
	}
	return &Cache[K, V]{size: size, order: list.New(), items: map[K]*list.Element{}}, nil
}
func (c *Cache[K, V]) Add(key K, value V) (evicted bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, ok := c.items[key]; ok {
		c.order.MoveToFront(e)
		e.Value = entry[K, V]{key, value}
		return false
	}
	c.items[key] = c.order.PushFront(entry[K, V]{key, value})
	if c.order.Len() > c.size {
		last := c.order.Back()
		c.order.Remove(last)
		delete(c.items, last.Value.(entry[K, V]).k)
		return true
	}
	return false
}
func (c *Cache[K, V]) Get(key K) (value V, ok bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, found := c.items[key]; found {
		c.order.MoveToFront(e)
		return e.Value.(entry[K, V]).v, true
	}
	return
}
func (c *Cache[K, V]) Peek(key K) (value V, ok bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	if e, found := c.items[key]; found {
		return e.Value.(entry[K, V]).v, true
	}
	return
}
func (c *Cache[K, V]) Contains(key K) bool {
	c.mu.RLock()
	defer c.mu.RUnlock()
	_, ok := c.items[key]
	return ok
}
func (c *Cache[K, V]) ContainsOrAdd(key K, value V) (ok, evicted bool) {
	if c.Contains(key) {
		return true, false
	}
	return false, c.Add(key, value)
}
func (c *Cache[K, V]) Remove(key K) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	e, ok := c.items[key]
	if ok {
		c.order.Remove(e)
		delete(c.items, key)
	}
	return ok
}
func (c *Cache[K, V]) Len() int { c.mu.RLock(); defer c.mu.RUnlock(); return c.order.Len() }
func (c *Cache[K, V]) Keys() []K {
	c.mu.RLock()
	defer c.mu.RUnlock()
	res := []K{}
	for e := c.order.Back(); e != nil; e = e.Prev() {
		res = append(res, e.Value.(entry[K, V]).k)
	}
	return res
}
func (c *Cache[K, V]) Purge() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.order.Init()
	c.items = map[K]*list.Element{}
}
