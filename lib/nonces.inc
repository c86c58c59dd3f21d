// Generated by tools/gennonces.cc.
static const struct { int curve; int zeros; unsigned nonce; } kNonces[] = {
{256,1,1094u},
{256,1,1219u},
{256,1,2419u},
{256,2,40393u},
{256,2,116173u},
{384,1,1069u},
{384,1,1511u},
{384,1,1840u},
{384,2,14971u},
{384,2,40603u},
{521,1,1000u},
{521,1,1002u},
{521,1,1003u},
{521,2,1010u},
{521,2,1538u},
};
