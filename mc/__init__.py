"""Bounded model checking of arcee-ai/mergekit: shared machinery."""
