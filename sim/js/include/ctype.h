#pragma once
int isspace(int); int isdigit(int); int isalpha(int); int isalnum(int); int tolower(int); int toupper(int);
