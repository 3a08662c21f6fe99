"""Runtime-verification harness for the opinf package in /repo."""
