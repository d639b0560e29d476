// Code generated by mkshim. DO NOT EDIT.

package sync

import std "sync"

type Cond = std.Cond
type Locker = std.Locker
type Map = std.Map

var NewCond = std.NewCond

type Pool = std.Pool
type WaitGroup = std.WaitGroup
