// Package h holds the harnesses.
package h
