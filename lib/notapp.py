"""Properties that are stated but not claimed"""
EXTRA = {}
NOT_APPLICABLE = {}
