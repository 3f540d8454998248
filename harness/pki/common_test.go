package pki

import (
	"context"

	jwt "github.com/golang-jwt/jwt/v5"
)

type userKey struct{}

type quiet struct{}

func (quiet) Errorf(string, ...any) {}

func claimsOf(ctx context.Context) jwt.MapClaims {
	c, _ := ctx.Value(userKey{}).(jwt.MapClaims)
	return c
}
