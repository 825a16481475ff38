// Package props holds the scenarios and tasks that decide each property.
package props
