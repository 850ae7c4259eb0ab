// Package plainkv implements a key/value storage.
package plainkv
